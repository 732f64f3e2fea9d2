// B01: volume boundary conditions, B02: surface boundary conditions (-DWHAT=1,2).
#include "ops.hpp"
using namespace FV;
FV_MAIN

namespace
{
template<typename T>
struct Bnd // expected boundary data
{
    std::vector<T> in, val;
    template<typename F>
    explicit Bnd(const F& f) : in(values(f.internalField())), val(values(f.boundaryField().value()))
    {}
};
#if WHAT == 1
template<typename T>
using Fld = fvcc::VolumeField<T>;
constexpr std::initializer_list<int> kinds = {0, 1, 2, 3, 4};
#else
template<typename T>
using Fld = fvcc::SurfaceField<T>;
constexpr std::initializer_list<int> kinds = {0, 1, 3};
#endif
template<typename T>
void model(const HMesh& h, const std::vector<BC<T>>& bc, Bnd<T>& m)
{
    for (std::size_t b = 0; b < h.nBnd; ++b)
    {
#if WHAT == 1
        m.val[b] = bcValue<T>(h, bc, m.in, m.val, b);
#else
        auto& c = bc[h.patchOf(b)];
        if (c.kind == 3) m.val[b] = m.in[h.nInt + b] = c.v;
#endif
        static const char* n[] = {"faces of calculated patches", "faces of empty patches", "faces of extrapolated patches", "faces of fixed-value patches", "faces of fixed-gradient patches"};
        H::count(n[bc[h.patchOf(b)].kind]);
    }
}
template<typename T>
void compare(const HMesh& h, const std::vector<BC<T>>& bc, const Fld<T>& f, const Bnd<T>& m, const std::string& w)
{
    expectEq(values(f.internalField()), m.in, w + ": internal values");
    auto v = values(f.boundaryField().value());
    H_CHECK(v.size() == h.nBnd, w << ": number of boundary values");
    for (std::size_t b = 0; b < h.nBnd; ++b)
    {
        int kind = bc[h.patchOf(b)].kind;
        bool ok = kind == 4 ? near(v[b], m.val[b], magOf(m.val[b])) : eq(v[b], m.val[b]);
        H_CHECK(ok, w << ": boundary face " << b << " (patch " << h.patchOf(b) << ", kind " << kind << ") is " << str(v[b]) << " instead of " << str(m.val[b]));
    }
}
// the mixed form (value fraction, reference value, reference gradient) the assembly relies on must
// describe the same relation; it is only meaningful where a condition prescribes something
template<typename T>
void mixed(const HMesh& h, const std::vector<BC<T>>& bc, const Fld<T>& f, const Bnd<T>& m, const std::string& w)
{
    auto fr = values(f.boundaryField().valueFraction());
    auto rv = values(f.boundaryField().refValue()), rg = values(f.boundaryField().refGrad());
    for (std::size_t b = 0; b < h.nBnd; ++b)
    {
        auto& c = bc[h.patchOf(b)];
        if (c.kind < 2) continue;
#if WHAT == 1
        T cell = m.in[(std::size_t)h.bCell[b]];
        T v = fr[b] * rv[b] + (1 - fr[b]) * (cell + (1.0 / h.bDeltaCoeffs[b]) * rg[b]);
        H_CHECK(near(v, m.val[b], magOf(m.val[b]) + magOf(cell)), w << ": boundary face " << b << ": fraction " << fr[b] << ", reference value " << str(rv[b]) << " and gradient " << str(rg[b]) << " describe " << str(v) << " instead of " << str(m.val[b]));
#else
        H_CHECK(eq(rv[b], c.v), w << ": reference value of boundary face " << b);
#endif
    }
}
// reference data of patches whose condition prescribes nothing stay as they were
template<typename T>
void untouched(const HMesh& h, const std::vector<BC<T>>& bc, const Fld<T>& f, const Snap<T>& s, const std::string& w)
{
    auto fr = values(f.boundaryField().valueFraction());
    auto rv = values(f.boundaryField().refValue()), rg = values(f.boundaryField().refGrad());
    for (std::size_t b = 0; b < h.nBnd; ++b)
        if (bc[h.patchOf(b)].kind < 2)
            H_CHECK(eq(fr[b], s.frac[b]) && eq(rv[b], s.ref[b]) && eq(rg[b], s.grad[b]), w << ": reference data of face " << b << " changed although its patch prescribes nothing");
}
template<typename T>
void one(Rng& r, bool thorough)
{
    Executor e = anyExec(r);
    HMesh h = sizedMesh(r, thorough);
    auto m = build(e, h);
    auto bcs = rndBCs<T>(r, h, kinds);
    // neighbouring patches of equal kind but different data are the interesting ones
    if (r.chance(0.3))
        for (auto& b : bcs) b.kind = bcs[0].kind;
    H::ctx().notes = std::string(WHAT == 1 ? "volume" : "surface") + " boundary conditions of a " + tname<T>() + " field on " + exName(e) + " kinds ";
    for (auto& b : bcs) H::ctx().notes += std::to_string(b.kind) + " ";
    H::ctx().notes += describe(h);
    sigMesh(h);
    for (auto& b : bcs) H::sig((uint64_t)b.kind);
#if WHAT == 1
    auto n = h.nCells;
    auto conds = volBCs<T>(*m, bcs);
    auto f = volField<T>(r, e, *m, rndVec<T>(r, n), bcs);
#else
    auto n = h.nFaces();
    auto conds = surfBCs<T>(*m, bcs);
    auto f = surfField<T>(r, e, *m, rndVec<T>(r, n), bcs);
#endif
    for (std::size_t p = 0; p < h.nPatch; ++p)
    {
        auto& c = conds[p];
        H_CHECK(c.patchID() == p && (std::size_t)c.patchStart() == h.offset[p] && (std::size_t)c.patchEnd() == h.offset[p + 1] && c.patchSize() == h.offset[p + 1] - h.offset[p]
                    && c.range().first == h.offset[p] && c.range().second == h.offset[p + 1],
                "patch " << p << " of condition: id " << c.patchID() << " start " << c.patchStart() << " end " << c.patchEnd() << " size " << c.patchSize());
    }
    if (r.chance(0.2))
    {
        // the ready-made lists hold one condition of their kind per patch
        auto made = [&](auto list, int kind)
        {
            std::vector<BC<T>> same(h.nPatch);
            for (auto& b : same) b.kind = kind;
            H_CHECK(list.size() == h.nPatch, list.size() << " ready-made conditions for " << h.nPatch << " patches");
            for (std::size_t p = 0; p < h.nPatch; ++p)
                H_CHECK(list[p].patchID() == p && list[p].range().first == h.offset[p] && list[p].range().second == h.offset[p + 1], "ready-made condition " << p << " belongs to another patch");
            Fld<T> q(e, "ready made", *m, list);
            poke(q.internalField(), rndVec<T>(r, n));
            poke(q.boundaryField().value(), rndVec<T>(r, h.nBnd));
            poke(q.boundaryField().refGrad(), rndVec<T>(r, h.nBnd));
            poke(q.boundaryField().refValue(), rndVec<T>(r, h.nBnd));
            Bnd<T> wq(q);
            q.correctBoundaryConditions();
            model(h, same, wq);
            compare(h, same, q, wq, "ready-made conditions");
            H::count("ready-made condition lists");
        };
#if WHAT == 1
        made(fvcc::createCalculatedBCs<fvcc::VolumeBoundary<T>>(*m), 0);
        made(fvcc::createExtrapolatedBCs<fvcc::VolumeBoundary<T>>(*m), 2);
#else
        made(fvcc::createCalculatedBCs<fvcc::SurfaceBoundary<T>>(*m), 0);
#endif
    }
    auto fr0 = values(f.boundaryField().valueFraction());
    for (auto& x : fr0) x = r.pick({0.0, 0.25, 1.0});
    poke(f.boundaryField().valueFraction(), fr0);
    Bnd<T> want(f);
    Snap<T> s0(f);
    // a bystander on the same mesh must not change
    auto other = f;
    Snap<T> so(other);
    for (int step = 0; step < 5; ++step)
    {
        switch (r.below(6))
        {
            case 0: { // the whole field
                f.correctBoundaryConditions();
                model(h, bcs, want);
                compare(h, bcs, f, want, "correctBoundaryConditions");
                mixed(h, bcs, f, want, "correctBoundaryConditions");
                Snap<T> once(f);
                f.correctBoundaryConditions();
                once.unchanged(f, "correcting a second time");
                H::count("repeated corrections");
                break;
            }
            case 1: { // a copy of the field corrects itself only
                auto c = f;
                Bnd<T> wc(c);
                Snap<T> sf(f);
                c.correctBoundaryConditions();
                model(h, bcs, wc);
                compare(h, bcs, c, wc, "copied field");
                sf.unchanged(f, "correcting a copy: original");
                break;
            }
            case 2: { // new internal values
                poke(f.internalField(), rndVec<T>(r, n));
                want.in = values(f.internalField());
                f.correctBoundaryConditions();
                model(h, bcs, want);
                compare(h, bcs, f, want, "after changing the internal values");
                mixed(h, bcs, f, want, "after changing the internal values");
                break;
            }
            case 3: { // someone overwrote the boundary values
                poke(f.boundaryField().value(), rndVec<T>(r, h.nBnd));
                want.val = values(f.boundaryField().value());
                f.correctBoundaryConditions();
                model(h, bcs, want);
                compare(h, bcs, f, want, "after changing the boundary values");
                break;
            }
            case 4: { // one condition alone, original or copy, on a domain field of its own
                if (!h.nPatch) break;
                auto p = r.below(h.nPatch);
#if WHAT == 1
                DomainField<T> d(e, n, m->boundaryMesh().offset());
#else
                DomainField<T> d(e, n, m->boundaryMesh().offset());
#endif
                poke(d.internalField(), rndVec<T>(r, n));
                initBoundary(r, d);
                Bnd<T> wd(d);
                Snap<T> sd(d);
                std::vector<BC<T>> only(bcs.size());
                only[p] = bcs[p];
                auto c = conds[p];
                if (r.chance(0.5)) c.correctBoundaryCondition(d);
                else conds[p].correctBoundaryCondition(d);
                model(h, only, wd);
                expectEq(values(d.internalField()), wd.in, "single condition: internal values");
                auto v = values(d.boundaryField().value());
                for (std::size_t b = 0; b < h.nBnd; ++b)
                    H_CHECK(near(v[b], wd.val[b], magOf(wd.val[b])), "condition of patch " << p << " alone: face " << b << " is " << str(v[b]) << " instead of " << str(wd.val[b]));
                auto fr = values(d.boundaryField().valueFraction());
                auto rv = values(d.boundaryField().refValue()), rg = values(d.boundaryField().refGrad());
                for (std::size_t b = 0; b < h.nBnd; ++b)
                    if (b < h.offset[p] || b >= h.offset[p + 1])
                        H_CHECK(eq(fr[b], sd.frac[b]) && eq(rv[b], sd.ref[b]) && eq(rg[b], sd.grad[b]), "condition of patch " << p << " alone: reference data of face " << b << " of another patch changed");
                H::count("single conditions");
                break;
            }
            default: { // order of the conditions does not matter
                auto g = f;
                Bnd<T> wg(g);
#if WHAT == 1
                DomainField<T> d(e, g.internalField(), g.boundaryField());
#else
                DomainField<T> d(e, g.internalField(), g.boundaryField());
#endif
                std::vector<std::size_t> ord(h.nPatch);
                for (std::size_t i = 0; i < ord.size(); ++i) ord[i] = i;
                r.shuffle(ord);
                for (auto p : ord) conds[p].correctBoundaryCondition(d);
                model(h, bcs, wg);
                expectEq(values(d.internalField()), wg.in, "conditions in another order: internal values");
                auto v = values(d.boundaryField().value());
                for (std::size_t b = 0; b < h.nBnd; ++b)
                    H_CHECK(near(v[b], wg.val[b], magOf(wg.val[b])), "conditions in another order: face " << b);
            }
        }
        untouched(h, bcs, f, s0, "boundary conditions");
        so.unchanged(other, "another field on the same mesh");
    }
    // data missing for the condition: rejected at construction
    if (h.nPatch && r.chance(0.2))
    {
        Dictionary d;
        d.insert("type", std::string("fixedValue"));
#if WHAT == 1
        H_THROWS(fvcc::VolumeBoundary<T>(*m, d, 0), std::exception, "a fixed value without its value");
#else
        H_THROWS(fvcc::SurfaceBoundary<T>(*m, d, 0), std::exception, "a fixed value without its value");
#endif
    }
}
}
void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    hostileSchedule(r);
    for (int i = 0; i < 4; ++i)
        if (r.chance(0.5)) one<scalar>(r, c.thorough);
        else one<Vector>(r, c.thorough);
}
